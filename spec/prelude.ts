// Platform classes the verifier gives meaning to by interpreting these definitions (trusted; checked against the platform by the
// concrete executions, which use the real ones).
export class Event {
  type: string;
  defaultPrevented = false;
  constructor(type: string) {
    this.type = type;
  }
  preventDefault() {
    this.defaultPrevented = true;
  }
}
export class CustomEvent extends Event {
  detail: any;
  constructor(type: string, init?: any) {
    super(type);
    this.detail = init === undefined ? null : init.detail;
  }
}
export class EventTarget {
  listeners: any[] = [];
  addEventListener(type: string, f: any, options?: any) {
    for (const l of this.listeners) if (l.type === type && l.f === f) return;
    const once = typeof options === "object" && options !== null && options.once === true;
    this.listeners.push({ type, f, once });
    const signal = typeof options === "object" && options !== null ? options.signal : undefined;
    if (signal !== undefined) signal.addEventListener("abort", () => this.removeEventListener(type, f));
  }
  removeEventListener(type: string, f: any) {
    const kept: any[] = [];
    for (const l of this.listeners) if (!(l.type === type && l.f === f)) kept.push(l);
    this.listeners = kept;
  }
  dispatchEvent(event: any) {
    const all = this.listeners;
    for (const l of all) {
      if (l.type !== event.type) continue;
      if (!this.listeners.includes(l)) continue;
      if (l.once) this.removeEventListener(l.type, l.f);
      l.f(event);
    }
    return !event.defaultPrevented;
  }
}
export class AbortSignal extends EventTarget {
  aborted = false;
  reason: any = undefined;
  onabort: any = null;
  throwIfAborted() {
    if (this.aborted) throw this.reason;
  }
  static abort(reason?: any) {
    const c = new AbortController();
    c.abort(reason);
    return c.signal;
  }
}
export class AbortController {
  signal = new AbortSignal();
  abort(reason?: any) {
    if (this.signal.aborted) return;
    this.signal.aborted = true;
    this.signal.reason = reason === undefined ? new DOMException("This operation was aborted", "AbortError") : reason;
    if (this.signal.onabort !== null) this.signal.onabort(new Event("abort"));
    this.signal.dispatchEvent(new Event("abort"));
  }
}
// least recently used entries leave first
export class LruCache {
  #m = new Map();
  #max: number;
  constructor(max: number) {
    this.#max = max;
  }
  get size() {
    return this.#m.size;
  }
  get(k: any) {
    if (!this.#m.has(k)) return undefined;
    const v = this.#m.get(k);
    this.#m.delete(k);
    this.#m.set(k, v);
    return v;
  }
  set(k: any, v: any) {
    this.#m.delete(k);
    this.#m.set(k, v);
    if (this.#m.size > this.#max) {
      for (const old of this.#m.keys()) {
        this.#m.delete(old);
        break;
      }
    }
    return this;
  }
  has(k: any) {
    return this.#m.has(k);
  }
  delete(k: any) {
    return this.#m.delete(k);
  }
  clear() {
    this.#m.clear();
  }
  keys() {
    return this.#m.keys();
  }
  values() {
    return this.#m.values();
  }
  entries() {
    return this.#m.entries();
  }
}
