// A WebSocket that does what the script says. w.sockets collects them; w.odd, if there, what is wrong with their use.
function socketClass(w, url) {
  class WebSocket {
    constructor(target, protocols) {
      this.url = String(target);
      this.readyState = 0;
      this.sent = [];
      this.lost = [];
      this.closed = false; // by the client, while it was in use
      this.handlers = {};
      this.n = w.sockets.length;
      w.sockets.push(this);
      const plain = protocols === undefined || (Array.isArray(protocols) && protocols.length === 0);
      if (url && (this.url !== url || !plain)) w.odd?.push("a connection to " + target);
    }
    send(x) {
      if (this.readyState === 0) { w.odd?.push("send before the connection was open"); throw new Error("InvalidStateError"); }
      (this.readyState === 1 ? this.sent : this.lost).push(x);
    }
    close() {
      if (this.readyState < 2) { this.closed = true; this.readyState = 2; }
    }
    addEventListener(type, fn, opt) {
      const list = this.handlers[type] ||= [];
      if (fn && !list.some((h) => h.fn === fn)) list.push({ fn, once: !!(opt && opt.once) });
    }
    removeEventListener(type, fn) {
      this.handlers[type] = (this.handlers[type] || []).filter((h) => h.fn !== fn);
    }
    dispatch(type, event = {}) {
      event = { type, target: this, currentTarget: this, ...event };
      const fns = [];
      if (typeof this["on" + type] === "function") fns.push((e) => this["on" + type](e));
      for (const h of [...(this.handlers[type] || [])]) {
        if (h.once) this.removeEventListener(type, h.fn);
        fns.push(typeof h.fn === "function" ? h.fn.bind(this) : (e) => h.fn.handleEvent(e));
      }
      // what a handler throws is reported, and that is all
      for (const f of fns) try { f(event); } catch (e) { w.thrown = e; }
    }
  }
  ["CONNECTING", "OPEN", "CLOSING", "CLOSED"].forEach((k, i) => { WebSocket[k] = i; WebSocket.prototype[k] = i; });
  return WebSocket;
}

// the names of a scope, also as members of the global object
function withGlobals(scope) {
  const global = Object.assign(Object.create(globalThis), scope);
  return { ...scope, globalThis: global };
}

module.exports = { socketClass, withGlobals };
