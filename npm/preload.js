"use strict";
// Loaded before the script under test: every connection goes to the check's own server, long timeouts are shortened,
// and the platform is the one of the scenario. Everything else is node's own.
const net = require("net");
const os = require("os");
const E = process.env;
const PORT = Number(E.NPM_PORT);
const SHORT = Number(E.NPM_TIMEOUT || 2000);

const connect = net.Socket.prototype.connect;
net.Socket.prototype.connect = function (...args) {
  const o = Array.isArray(args[0]) ? args[0][0] : args[0];
  if (o && typeof o === "object" && !o.path) {
    const refused = /^(localhost|127\.|\[?::1)/.test(o.host || "localhost");
    o.host = "127.0.0.1";
    o.port = refused ? 1 : PORT;
    delete o.lookup;
  }
  return connect.apply(this, args);
};
const cut = (ms) => (ms >= 5000 ? SHORT : ms);
const st = net.Socket.prototype.setTimeout;
net.Socket.prototype.setTimeout = function (ms, cb) {
  return st.call(this, cut(ms), cb);
};
const gst = globalThis.setTimeout;
globalThis.setTimeout = Object.assign((f, ms, ...a) => gst(f, cut(ms), ...a), gst);
const abort = AbortSignal.timeout;
AbortSignal.timeout = (ms) => abort.call(AbortSignal, cut(ms));
if (E.NPM_PLATFORM) {
  const [platform, arch] = E.NPM_PLATFORM.split("-");
  os.platform = () => platform;
  os.arch = () => arch;
  Object.defineProperty(process, "platform", { value: platform });
  Object.defineProperty(process, "arch", { value: arch });
}
