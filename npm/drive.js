"use strict";
// node drive.js N01|N02 quick|thorough <package dir> <scratch dir> <fault.so> [schema dir]
// Runs the package's scripts against every enumerated server behaviour, local fault and state, and prints one JSON
// line per violation and per counter.
const fs = require("fs");
const net = require("net");
const tls = require("tls");
const path = require("path");
const zlib = require("zlib");
const { createHash, randomFillSync } = require("crypto");
const { spawn, spawnSync } = require("child_process");

const [, , CHECK, TIER, PKG, SCRATCH, FAULT_SO, SCHEMAS] = process.argv;
const THOROUGH = TIER === "thorough";
const VERSION = "9.8.7";
const ONLY = process.env.NPM_ONLY; // replay of one scenario
const say = (o) => fs.writeSync(1, JSON.stringify(o) + "\n");
const { gzipSync, brotliCompressSync, deflateSync } = require("zlib");
const sha = (b) => createHash("sha256").update(b).digest("hex");
const cert = (n) => ({ key: fs.readFileSync(`${__dirname}/certs/${n}.key`), cert: fs.readFileSync(`${__dirname}/certs/${n}.pem`) });
const CERTS = { good: cert("good"), wronghost: cert("wronghost"), untrusted: cert("untrusted") };
const TARGETS = {
  "darwin-x64": "x86_64-apple-darwin",
  "darwin-arm64": "aarch64-apple-darwin",
  "linux-x64": "x86_64-unknown-linux-musl",
  "linux-arm64": "aarch64-unknown-linux-musl",
};

// ---------------------------------------------------------------- server
const end = (sock, how) => (how === "rst" ? (sock.raw || sock).resetAndDestroy() : sock.end());
/** Splits the answer of a step into the bytes to send and what to do then. */
function answer(step, bodies, accepts = "") {
  let body = Buffer.from(bodies[step.body || "good"] || "");
  // what servers do to those that say they can undo it
  const zip = step.zip && [["gzip", gzipSync], ["br", brotliCompressSync], ["deflate", deflateSync]].find(([n]) => (step.zip === true || step.zip === n) && new RegExp(`(^|[ ,])(${n}|\\*)(?! *; *q=0(\\.0*)?( *,|$))`, "i").test(accepts));
  if (zip) body = zip[1](body);
  const status = step.status || 200;
  let head = `HTTP/1.1 ${status} X\r\n`;
  for (const h of step.headers || []) head += h + "\r\n";
  if (zip) head += `Content-Encoding: ${zip[0]}\r\n`;
  let payload = body;
  if (step.enc === "chunked") {
    head += "Transfer-Encoding: chunked\r\n";
    const parts = [];
    const n = Math.max(1, Math.ceil(body.length / 3));
    for (let i = 0; i < body.length; i += n) {
      const c = body.subarray(i, i + n);
      parts.push(Buffer.from(c.length.toString(16) + "\r\n"), c, Buffer.from("\r\n"));
    }
    parts.push(Buffer.from("0\r\n\r\n"));
    payload = Buffer.concat(parts);
  } else if (step.enc !== "close") head += `Content-Length: ${body.length + (step.lie || 0)}\r\n`;
  head += step.keep ? "Connection: keep-alive\r\n\r\n" : "Connection: close\r\n\r\n";
  return { bytes: Buffer.concat([Buffer.from(head), payload]), head: Buffer.byteLength(head) };
}
function serve(sc, bodies, log) {
  const state = { n: 0, socks: new Set() };
  const step = () => sc.steps[Math.min(state.n, sc.steps.length - 1)] || { k: "reset" };
  const onreq = (sock, req) => {
    const s = step();
    state.n++;
    log.push({ host: req.host, path: req.path, method: req.method, body: req.body, type: req.type, step: s });
    sock.on("error", () => {});
    if (s.k === "stall" && s.at === "start") return;
    if (s.k === "garbage") return void (sock.write("not http at all\r\n\r\n"), end(sock, "fin"));
    const a = answer(s, bodies, req.accepts);
    let at = a.bytes.length;
    if (s.at === "head") at = a.head;
    else if (s.at === "inhead") at = Math.floor(a.head / 2);
    else if (s.at === "first") at = a.head + 1;
    else if (s.at === "mid") at = a.head + Math.floor((a.bytes.length - a.head) / 2);
    else if (s.at === "last") at = a.bytes.length - 1;
    else if (typeof s.at === "number") at = Math.min(s.at, a.bytes.length);
    const send = a.bytes.subarray(0, at);
    if (s.k === "cut") sock.write(send, () => setImmediate(() => end(sock, s.how)));
    else if (s.k === "stall") sock.write(send);
    else {
      const tail = s.extra ? Buffer.from("and more bytes than announced") : Buffer.alloc(0);
      sock.write(Buffer.concat([send, tail]), () => {
        log[log.length - 1].sent = true;
        if (!s.keep) end(sock, "fin");
      });
    }
  };
  const onsock = (sock) => {
    sock.on("error", () => {});
    let buf = Buffer.alloc(0);
    sock.on("data", (d) => {
      buf = Buffer.concat([buf, d]);
      const i = buf.indexOf("\r\n\r\n");
      if (i < 0) return;
      const head = buf.subarray(0, i).toString();
      const len = Number((/content-length: *(\d+)/i.exec(head) || [])[1] || 0);
      let body = buf.subarray(i + 4);
      if (/transfer-encoding: *chunked/i.test(head)) {
        if (!body.toString().endsWith("0\r\n\r\n")) return;
        let out = "", t = body.toString(), m;
        while ((m = /^([0-9a-f]+)\r\n/i.exec(t)) && parseInt(m[1], 16)) {
          const n = parseInt(m[1], 16);
          out += t.slice(m[0].length, m[0].length + n);
          t = t.slice(m[0].length + n + 2);
        }
        body = Buffer.from(out);
      } else if (body.length < len) return;
      buf = Buffer.alloc(0);
      const [method, p] = head.split(" ");
      onreq(sock, { method, path: p, host: (/^host: *(.*)$/im.exec(head) || [])[1], type: (/^content-type: *(.*)$/im.exec(head) || [])[1], accepts: (/^accept-encoding: *(.*)$/im.exec(head) || [])[1], body: body.toString() });
    });
  };
  const server = net.createServer((raw) => {
    state.socks.add(raw);
    raw.on("close", () => state.socks.delete(raw));
    raw.on("error", () => {});
    const s = step();
    if (s.k === "reset") {
      state.n++;
      log.push({ step: s });
      return void raw.resetAndDestroy();
    }
    if (s.k === "accept-stall") {
      state.n++;
      log.push({ step: s });
      return;
    }
    if (sc.plain) return onsock(raw);
    if (s.cert && s.cert !== "good") {
      state.n++;
      log.push({ step: s });
    }
    const t = new tls.TLSSocket(raw, { isServer: true, secureContext: tls.createSecureContext(CERTS[s.cert || "good"]) });
    t.raw = raw;
    onsock(t);
  });
  return new Promise((ok) =>
    server.listen(0, "127.0.0.1", () =>
      ok({
        port: server.address().port,
        close: () => {
          for (const s of state.socks) s.destroy();
          server.close();
        },
      }),
    ),
  );
}

// ---------------------------------------------------------------- running one script
let serial = 0;
function sandbox() {
  const d = path.join(SCRATCH, `s${serial++}`);
  fs.mkdirSync(d, { recursive: true });
  return d;
}
function exec(args, { cwd, env, limit }) {
  return new Promise((ok) => {
    const p = spawn(process.execPath, args, { cwd, env, stdio: ["ignore", "pipe", "pipe"], detached: true });
    let out = "";
    p.stdout.on("data", (d) => (out += d));
    p.stderr.on("data", (d) => (out += d));
    let hang = false;
    const t = setTimeout(() => {
      hang = true;
      try { process.kill(-p.pid, "SIGKILL"); } catch {}
    }, limit);
    p.on("close", (code, signal) => {
      clearTimeout(t);
      ok({ code, signal, hang, out });
    });
  });
}
function environment(sc, root, port, more) {
  return {
    HOME: root,
    NPM_PORT: String(port),
    NPM_SANDBOX: root,
    NPM_FAULT: sc.fault || "",
    NPM_LOG: root + ".fslog",
    NPM_TIMEOUT: sc.patient ? "6000" : "2000",
    NPM_PLATFORM: sc.platform || "linux-x64",
    NODE_EXTRA_CA_CERTS: `${__dirname}/certs/ca.pem`,
    LD_PRELOAD: FAULT_SO,
    UV_USE_IO_URING: "0",
    ...more,
  };
}
const fslog = (root) => {
  try {
    const t = fs.readFileSync(root + ".fslog", "utf8");
    fs.rmSync(root + ".fslog");
    return t.split("\n").filter(Boolean);
  } catch {
    return [];
  }
};
const content = (f) => {
  try {
    const st = fs.statSync(f);
    return st.isDirectory() ? { dir: true } : { sha: sha(fs.readFileSync(f)), mode: st.mode & 0o777 };
  } catch {
    return null;
  }
};

// ---------------------------------------------------------------- the archives
const QLC = {};
function archives(dir) {
  const make = (name, files) => {
    const d = path.join(dir, name);
    fs.mkdirSync(d, { recursive: true });
    for (const [f, c] of Object.entries(files)) fs.writeFileSync(path.join(d, f), c, { mode: 0o644 });
    const out = path.join(dir, name + ".tar.gz");
    const r = spawnSync("/usr/bin/tar", ["czf", out, "-C", d, ...Object.keys(files)]);
    if (r.status) throw new Error("tar: " + r.stderr);
    return fs.readFileSync(out);
  };
  const b = {};
  const noise = randomFillSync(Buffer.alloc(300000));
  for (const [p, t] of Object.entries(TARGETS)) {
    QLC[p] = "#!/bin/sh\necho qlc " + t + "\n";
    b[p] = make(t, { qlc: QLC[p] });
  }
  QLC.big = Buffer.concat([Buffer.from("#!/bin/sh\nexit 0\n"), noise]);
  b.big = make("big", { qlc: QLC.big });
  b.noqlc = make("noqlc", { other: "x" });
  QLC.evil = "#!/bin/sh\necho gotcha\n";
  b.evil = make("evil", { qlc: QLC.evil });
  b.flipped = Buffer.from(b["linux-x64"]);
  b.flipped[b.flipped.length - 1] ^= 1;
  b.longer = Buffer.concat([b["linux-x64"], Buffer.from([0])]);
  b.shorter = b["linux-x64"].subarray(0, -1);
  b.empty = Buffer.alloc(0);
  b.text = Buffer.from("<html>not an archive</html>");
  return b;
}
const STUB = `#!/bin/bash
unset LD_PRELOAD
export PATH=/usr/bin:/bin
a=""; d=""
for x in "$@"; do [ -f "$x" ] && [ -z "$a" ] && a="$x"; done
echo "$(/usr/bin/sha256sum < "$a" 2>/dev/null | /usr/bin/cut -d' ' -f1)" >> "$TAR_LOG"
case "$TAR_MODE" in
  fail) exit 2;;
  late) /usr/bin/tar "$@"; exit 1;;
  killed) kill -9 $$;;
  *) exec /usr/bin/tar "$@";;
esac
`;

// ---------------------------------------------------------------- N01
async function install(sc, B) {
  const root = sandbox();
  const platform = sc.platform || "linux-x64";
  const target = TARGETS[platform];
  const bodies = { ...B, good: B[sc.archive || platform] || B["linux-x64"] };
  fs.cpSync(path.join(PKG, "lib"), path.join(root, "lib"), { recursive: true });
  fs.cpSync(path.join(PKG, "bin"), path.join(root, "bin"), { recursive: true });
  let pj = fs.readFileSync(path.join(PKG, "package.json"), "utf8").replaceAll("@QLC_VERSION@", VERSION);
  for (const [p, t] of Object.entries(TARGETS)) pj = pj.replaceAll(`@${t}_CHECKSUM@`, sha(p === platform ? bodies.good : B[p]));
  const json = JSON.parse(pj);
  if (sc.sums === "missing") delete json.checksumConfig[target];
  if (sc.sums === "empty") json.checksumConfig[target] = "";
  const [how, at] = (sc.sums || "").split(" "), sum = json.checksumConfig[target];
  const flip = (c) => (c === "0" ? "1" : "0");
  const other = {
    flip: () => sum.slice(0, at) + flip(sum[at]) + sum.slice(Number(at) + 1),
    cut: () => sum.slice(0, at),
    twice: () => sum + sum,
    space: () => sum.slice(0, 63) + " ",
    zeros: () => "0".repeat(64),
    name: () => `${sum.slice(0, 63)}${flip(sum[63])}  qlc.tar.gz`,
    list: () => [],
    number: () => 1,
    object: () => ({}),
  }[how];
  if (other) json.checksumConfig[target] = other();
  if (sc.sums === "other") json.checksumConfig[target] = sha(B.evil);
  fs.writeFileSync(path.join(root, "package.json"), JSON.stringify(json, null, 2));
  const pinned = json.checksumConfig && json.checksumConfig[target];
  const archive = path.join(root, `qlc-${VERSION}-${target}.tar.gz`);
  if (sc.state === "nobin") fs.rmSync(path.join(root, "bin"), { recursive: true });
  if (sc.state === "binfile") {
    fs.rmSync(path.join(root, "bin"), { recursive: true });
    fs.writeFileSync(path.join(root, "bin"), "x");
  }
  if (sc.state === "stalegood") fs.writeFileSync(archive, bodies.good);
  if (sc.state === "stalewrong") fs.writeFileSync(archive, Buffer.concat([B.evil, Buffer.alloc(100000)]));
  if (sc.state === "staledir") fs.mkdirSync(archive);
  if (sc.state === "staleqlc") fs.writeFileSync(path.join(root, "bin/qlc"), "old", { mode: 0o600 });
  const before = content(archive);
  const stub = root + ".path";
  fs.mkdirSync(stub);
  if (sc.tar !== "missing") fs.writeFileSync(path.join(stub, "tar"), STUB, { mode: 0o755 });
  const log = [];
  const server = await serve(sc, bodies, log);
  const r = await exec(["--require", `${__dirname}/preload.js`, "lib/postinstall.js"], {
    cwd: root,
    limit: sc.patient ? 90000 : 45000,
    env: environment(sc, root, server.port, { PATH: stub, TAR_MODE: sc.tar || "", TAR_LOG: root + ".tarlog" }),
  });
  server.close();
  let tar = [];
  try { tar = fs.readFileSync(root + ".tarlog", "utf8").split("\n").filter(Boolean); } catch {}
  const left = content(archive);
  const bin = content(path.join(root, "bin/qlc"));
  const trace = fslog(root);
  const faulted = trace.filter((l) => l.endsWith(" FAULT"));
  for (const x of [root, stub, root + ".tarlog"]) fs.rmSync(x, { recursive: true, force: true });

  const bad = [];
  const q = Object.keys(B).find((k) => sha(B[k]) === pinned);
  const complete = log.some((l) => l.sent && l.step.k === "full" && !l.step.lie && pinned === sha(bodies[l.step.body || "good"]));
  if (r.hang) bad.push("hang|the installer does not terminate");
  for (const t of tar) if (t !== pinned) bad.push("unpack|tar is run on an archive without the pinned checksum");
  if (r.code === 0) {
    if (!target) bad.push("platform|exit 0 on an unsupported platform");
    if (!complete) bad.push("incomplete|exit 0 although no archive with the pinned checksum was downloaded completely");
    if (!tar.length) bad.push("notar|exit 0 although nothing was unpacked");
    if (sc.tar && sc.tar !== "ok") bad.push("tarfail|exit 0 although tar failed");
    if (!bin || bin.dir || bin.sha !== sha(QLC[q] || "")) bad.push("binary|exit 0 but bin/qlc is not the binary of the archive");
    else if ((bin.mode & 0o111) !== 0o111) bad.push("mode|exit 0 but the binary is not executable");
    if (left) bad.push("leftover|exit 0 but the archive is left behind");
    if (log.filter((l) => l.step.status === 302).length > 10) bad.push("redirects|exit 0 after more than ten redirects");
  } else if (!r.hang) {
    const cleanup = faulted.some((f) => f.startsWith("unlink:"));
    if (left && !left.dir && left.sha !== pinned && !cleanup && JSON.stringify(left) !== JSON.stringify(before))
      bad.push("left|an archive that fails the check is left behind");
    if (sc.must) bad.push("refused|the installation fails although nothing went wrong: " + r.out.trim().split("\n")[0].slice(0, 200));
  }
  // what was asked for
  const want = [];
  if (target) want.push(["github.com", `/notarize/qlc/releases/download/${VERSION}/qlc-${VERSION}-${target}.tar.gz`]);
  for (const s of sc.steps) if (s.to) want.push([s.to.split("/")[2], "/" + s.to.split("/").slice(3).join("/")]);
  log.forEach((l, i) => {
    if (!l.method) return;
    if (i >= want.length) return void (sc.loop || !target ? target || bad.push("request|a download is attempted on an unsupported platform") : bad.push("request|an unexpected further request"));
    if (sc.loop) return;
    if (l.method !== "GET" || l.host !== want[i][0] || l.path !== want[i][1]) bad.push(`request|request ${i} is ${l.method} ${l.host} ${l.path} instead of ${want[i].join(" ")}`);
  });
  return { bad, trace, outcome: `${r.hang ? "hang" : r.code === 0 ? "installed" : "refused"}`, detail: r, tar, log };
}
function n01(B) {
  const S = [];
  const GOOD = { k: "full" };
  const hop = (i) => ({ k: "full", status: 302, body: "empty", to: `https://mirror.example/hop${i}?x=${i}`, headers: [`Location: https://mirror.example/hop${i}?x=${i}`] });
  const chain = (n, f) => [...Array(n).keys()].map(hop).concat(f);
  const finals = [["good", GOOD], ["chunked", { k: "full", enc: "chunked" }], ["until-close", { k: "full", enc: "close" }], ["keep-alive", { k: "full", keep: true }], ["compressed", { k: "full", zip: true }]];
  const must = finals.length;
  for (const b of ["evil", "flipped", "longer", "shorter", "empty", "text", "darwin-x64"]) finals.push(["body " + b, { k: "full", body: b }], ["chunked body " + b, { k: "full", body: b, enc: "chunked" }], ["until-close body " + b, { k: "full", body: b, enc: "close" }]);
  for (const how of ["fin", "rst"])
    for (const enc of ["length", "chunked", "close"])
      for (const at of ["inhead", "head", "first", "mid", "last"]) finals.push([`cut ${how} ${enc} ${at}`, { k: "cut", how, enc, at }]);
  for (const at of ["start", "inhead", "head", "mid", "last"]) finals.push([`stall ${at}`, { k: "stall", at }]);
  finals.push(["stall before TLS", { k: "accept-stall" }], ["reset", { k: "reset" }], ["garbage", { k: "garbage" }], ["announces more", { k: "full", lie: 5 }], ["sends more", { k: "full", extra: true }]);
  for (const c of ["untrusted", "wronghost"]) finals.push([`certificate ${c}`, { k: "full", cert: c }]);
  for (const st of [201, 204, 206, 301, 303, 304, 307, 308, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503]) finals.push([`status ${st}`, { k: "full", status: st }]);
  for (const [n, l] of [["none", null], ["relative", "/x"], ["empty", ""], ["to http", "http://mirror.example/x"], ["to file", "file:///etc/passwd"], ["nonsense", "%%%"], ["no host", "https://"], ["scheme only", "https:"]])
    finals.push([`302 ${n}`, { k: "full", status: 302, headers: l === null ? [] : [`Location: ${l}`], odd: true }]);
  const chains = THOROUGH ? [0, 1, 2, 3, 5, 9, 10, 11, 12] : [0, 1, 10, 11];
  for (const n of chains)
    finals.forEach(([name, f], i) => {
      if (!THOROUGH && n > 1 && /stall|cut (fin|rst) (chunked|close)|chunked body|until-close body/.test(name)) return;
      S.push({ id: `${n} redirects, then ${name}`, steps: chain(n, f), must: i < must && n <= 10, loop: !!f.odd || n > 10 });
    });
  // a break in any redirect of a chain
  for (const [name, f] of [["stall start", { k: "stall", at: "start" }], ["404", { k: "full", status: 404 }], ["reset", { k: "reset" }], ["untrusted", { ...hop(0), cert: "untrusted" }]])
    for (const at of THOROUGH ? [1, 2, 3, 4] : [1, 2]) S.push({ id: `${name} at redirect ${at} of a good chain`, steps: [...chain(at, f), GOOD], loop: true });
  S.push({ id: "endless redirects", steps: [hop(0)], loop: true });
  // redirects that break off in their own body, with and without keep-alive
  for (const h of [{ k: "cut", how: "fin", at: "head", body: "text" }, { k: "cut", how: "rst", at: "mid", body: "text" }, { k: "stall", at: "head", body: "text" }, { k: "full", body: "text", keep: true }, { k: "full", body: "text", enc: "chunked" }])
    S.push({ id: `redirect ${h.k} ${h.how || ""} ${h.at || ""}${h.keep ? " kept alive" : ""}${h.enc || ""}, then good`, steps: [{ ...hop(0), ...h, status: 302 }, GOOD], must: h.k === "full", loop: true });
  for (const f of [GOOD, { k: "full", enc: "chunked" }, { k: "full", body: "evil" }, { k: "cut", how: "fin", at: "mid" }, { k: "cut", how: "rst", at: "mid" }, { k: "cut", how: "rst", at: "last" }, { k: "stall", at: "mid" }, { k: "cut", how: "fin", at: "mid", enc: "chunked" }])
    S.push({ id: `large archive: ${f.k} ${f.body || ""} ${f.how || ""} ${f.at || ""} ${f.enc || ""}`, archive: "big", steps: [f], must: f.k === "full" && !f.body });
  if (THOROUGH) {
    const len = answer(GOOD, { good: B["linux-x64"] }).bytes.length;
    const clen = answer({ k: "full", enc: "chunked" }, { good: B["linux-x64"] }).bytes.length;
    for (const how of ["fin", "rst"]) {
      for (let i = 0; i < len; i += 1) S.push({ id: `cut ${how} after ${i} bytes`, steps: [{ k: "cut", how, at: i }] });
      for (let i = 0; i < clen; i += 1) S.push({ id: `cut ${how} chunked after ${i} bytes`, steps: [{ k: "cut", how, at: i, enc: "chunked" }] });
      for (let i = 0; i < len; i += 1) S.push({ id: `cut ${how} until-close after ${i} bytes`, steps: [{ k: "cut", how, at: i, enc: "close" }] });
    }
  }
  // platforms and pinned checksums
  const unsupported = ["win32-x64", "win32-arm64", "freebsd-x64", "linux-ia32", "linux-arm", "darwin-ppc", "linux-", "x64-linux", "sunos-x64"];
  for (const p of [...Object.keys(TARGETS), ...unsupported])
    for (const b of ["good", ...Object.keys(TARGETS), "evil"]) S.push({ id: `platform ${p}, body ${b}`, platform: p, steps: [{ k: "full", body: b }], must: p in TARGETS && (b === "good" || b === p) });
  for (const sums of ["missing", "empty", "other"])
    for (const b of ["good", "evil", "empty", "text"])
      for (const p of Object.keys(TARGETS)) S.push({ id: `checksum ${sums} on ${p}, body ${b}`, sums, platform: p, steps: [{ k: "full", body: b }], must: sums === "other" && b === "evil" });
  // a sum that differs anywhere is another sum, and one that is cut off or goes on is none
  const sums = [...Array(64).keys()].map((i) => `flip ${i}`).concat([1, 7, 8, 16, 31, 32, 33, 40, 63].map((i) => `cut ${i}`), "twice", "space", "zeros", "name", "list", "number", "object");
  for (const x of sums) S.push({ id: `checksum ${x}`, sums: x, steps: [GOOD] });
  // states and tar
  const small = [["good", GOOD], ["wrong", { k: "full", body: "evil" }], ["cut", { k: "cut", how: "fin", at: "mid" }], ["404", { k: "full", status: 404 }]];
  for (const state of ["", "nobin", "binfile", "stalegood", "stalewrong", "staledir", "staleqlc"])
    for (const tar of ["ok", "fail", "late", "killed", "missing"])
      for (const [n, f] of small) S.push({ id: `state ${state || "fresh"}, tar ${tar}, ${n}`, state, tar, steps: [f], must: n === "good" && tar === "ok" && !["binfile", "staledir"].includes(state) });
  S.push({ id: "archive without the binary", archive: "noqlc", state: "nobin", steps: [GOOD] });
  return S;
}
const ERRNOS = { EIO: 5, EACCES: 13, ENOSPC: 28, ENOENT: 2, EMFILE: 24, EPERM: 1 };
function faults(trace) {
  const out = [];
  for (const l of trace) {
    const [call, file, nth] = l.split(":");
    const names = THOROUGH ? Object.keys(ERRNOS) : call === "write" ? ["EIO", "ENOSPC"] : ["EIO", "EACCES"];
    for (const e of names) out.push([`${call}:${file}:${nth}:${ERRNOS[e]}`, `${call} ${file} #${nth} ${e}`]);
  }
  return out;
}

// ---------------------------------------------------------------- N02
let QUERY = null;
async function fetchSchema(sc, B) {
  const root = sandbox();
  for (const d of ["lib", "bin"]) fs.cpSync(path.join(PKG, d), path.join(root, d), { recursive: true });
  fs.writeFileSync(path.join(root, "package.json"), "{}");
  const work = path.join(root, "work");
  fs.mkdirSync(work);
  const outName = sc.out || "schema.json";
  const out = path.join(work, outName);
  if (sc.state === "old") fs.writeFileSync(out, B.old);
  if (sc.state === "dir") fs.mkdirSync(out, { recursive: true });
  if (sc.state === "sub") fs.mkdirSync(path.dirname(out), { recursive: true });
  const before = content(out);
  const log = [];
  const server = await serve(sc, B, log);
  const args = sc.args || [(sc.plain ? "http" : "https") + "://" + (sc.url || "api.example/graphql")].concat(sc.out ? [sc.out] : []);
  const r = await exec(["--require", `${__dirname}/preload.js`, path.join(root, "bin/qlc-download-schema"), ...args], {
    cwd: work,
    limit: sc.patient ? 90000 : 45000,
    env: environment(sc, root, server.port, { PATH: "/nonexistent" }),
  });
  server.close();
  const after = content(out);
  const others = fs.readdirSync(work, { recursive: true }).map(String).filter((f) => f !== outName && !outName.startsWith(f + "/"));
  const trace = fslog(root);
  const faulted = trace.filter((l) => l.endsWith(" FAULT"));
  fs.rmSync(root, { recursive: true, force: true });
  const bad = [];
  const done = log.filter((l) => l.sent && l.step.k === "full" && (l.step.status || 200) === 200 && !l.step.lie && (!l.step.cert || l.step.cert === "good"));
  if (r.hang) bad.push("hang|the download does not terminate");
  if (r.code === 0) {
    if (!done.length) bad.push("incomplete|exit 0 although no complete 200 response was received");
    else if (!after || after.dir || after.sha !== sha(B[done[0].step.body || "good"])) bad.push("content|exit 0 but the output file is not the body of the response");
  } else if (!r.hang) {
    if (after && JSON.stringify({ ...after, mode: 0 }) !== JSON.stringify({ ...before, mode: 0 }) && !faulted.some((f) => f.startsWith("unlink:"))) bad.push("left|a partial output file is left behind");
    if (sc.must) bad.push("refused|the download fails although nothing went wrong: " + r.out.trim().split("\n")[0].slice(0, 200));
  }
  if (others.length) bad.push("others|other files appear: " + others.join(" "));
  log.forEach((l, i) => {
    if (!l.method) return;
    const u = new URL(args[0]);
    if (i) return void bad.push("request|a second request is made");
    if (l.method !== "POST" || l.host !== u.host || l.path !== u.pathname + u.search) bad.push(`request|the request is ${l.method} ${l.host} ${l.path}`);
    let q = null;
    try { q = JSON.parse(l.body).query; } catch {}
    if (typeof q !== "string") bad.push("request|the request body is not JSON with a query");
    else if (!/^application\/json\b/.test(l.type || "")) bad.push("request|the request is not declared as JSON");
    else QUERY = q;
  });
  return { bad, trace, outcome: r.hang ? "hang" : r.code === 0 ? "stored" : "refused", detail: r, log };
}
function n02() {
  const S = [];
  const GOOD = { k: "full" };
  const finals = [];
  for (const body of ["good", "big", "utf8", "html"])
    for (const enc of ["length", "chunked", "close"]) finals.push([`200 ${body} ${enc}`, { k: "full", body, enc }, true]);
  for (const enc of ["length", "chunked", "close"]) for (const zip of [true, "br", "deflate"]) finals.push([`200 compressed for those who ask (${zip}) ${enc}`, { k: "full", enc, zip }, true]);
  finals.push(["200 keep-alive", { k: "full", keep: true }, true], ["200 empty", { k: "full", body: "empty" }, true]);
  for (const body of ["good", "big"])
    for (const how of ["fin", "rst"])
      for (const enc of ["length", "chunked"])
        for (const at of ["inhead", "head", "first", "mid", "last"]) finals.push([`cut ${body} ${how} ${enc} ${at}`, { k: "cut", body, how, enc, at }]);
  for (const at of ["start", "inhead", "head", "mid", "last"])
    for (const enc of ["length", "chunked"]) finals.push([`stall ${enc} ${at}`, { k: "stall", at, enc, body: "big" }]);
  finals.push(["stall on connect", { k: "accept-stall" }], ["reset", { k: "reset" }], ["garbage", { k: "garbage" }], ["announces more", { k: "full", lie: 5 }], ["sends more", { k: "full", extra: true }]);
  for (const st of [201, 202, 203, 204, 206, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 413, 429, 500, 502, 503, 504]) finals.push([`status ${st}`, { k: "full", status: st, headers: st > 300 && st < 309 ? ["Location: https://api.example/else"] : [] }]);
  for (const plain of [true, false])
    for (const state of ["", "old"])
      for (const out of ["", "given.json"])
        for (const [name, f, ok] of finals) {
          if (!THOROUGH && /stall/.test(name) && (!!out || (state && !plain))) continue;
          if (!THOROUGH && plain && out && !state) continue;
          S.push({ id: `${plain ? "http" : "https"}, ${state ? "earlier" : "no earlier"} output${out ? " given.json" : ""}: ${name}`, plain, state, out, steps: [f], must: !!ok });
        }
  for (const c of ["untrusted", "wronghost"])
    for (const state of ["", "old"]) S.push({ id: `certificate ${c} ${state}`, state, steps: [{ k: "full", cert: c }] });
  for (const u of ["api.example/", "api.example", "api.example/a/b/c?x=1&y=%20z", "api.example:8443/graphql", "api.example/graphql#part"])
    for (const plain of [true, false]) S.push({ id: `endpoint ${u} ${plain ? "http" : "https"}`, url: u, plain, steps: [GOOD], must: true });
  for (const a of [[], [""], ["nonsense"], ["/graphql"], ["ftp://api.example/x"], ["file:///etc/hostname"], ["https://"], ["http://localhost:1/x"]])
    for (const state of ["", "old"]) S.push({ id: `arguments ${JSON.stringify(a)} ${state}`, args: a, state, plain: true, steps: [GOOD] });
  for (const [state, out] of [["", "missing/dir.json"], ["dir", "dir.json"], ["sub", "sub/dir.json"], ["sub", "./sub/x y.json"]])
    for (const plain of [true, false]) S.push({ id: `output ${out} ${state} ${plain}`, state, out: path.normalize(out), plain, steps: [GOOD], must: state === "sub" });
  if (THOROUGH) {
    const B = { good: BODY.good };
    for (const enc of ["length", "chunked"]) {
      const n = answer({ k: "full", enc }, B).bytes.length;
      for (const how of ["fin", "rst"]) for (let i = 0; i < n; i++) S.push({ id: `cut ${enc} ${how} after ${i} bytes`, plain: true, steps: [{ k: "cut", enc, how, at: i }] });
    }
  }
  return S;
}
const BODY = {
  good: '{"data":{"__schema":{"types":[]}}}',
  big: '{"data":"' + "abcdefgh".repeat(60000) + '"}',
  utf8: '{"data":"' + "\u00e4\u{1f600}\u2028".repeat(20000) + '"}',
  html: "<html>login</html>",
  empty: "",
  old: '{"earlier":true}',
};

// ---------------------------------------------------------------- what the introspection query asks for
function parseQuery(text) {
  const tok = text.match(/\.\.\.|[{}()\[\]:!=@$]|[A-Za-z_][A-Za-z_0-9]*|"[^"]*"|-?\d+/g);
  let i = 0;
  const sel = () => {
    const out = [];
    i++;
    while (tok[i] !== "}") {
      if (i >= tok.length) throw new Error("unbalanced");
      if (tok[i] === "...") {
        i++;
        if (tok[i] === "on" || tok[i] === "{") {
          if (tok[i] === "on") i += 2;
          out.push({ inline: sel() });
        } else out.push({ spread: tok[i++] });
        continue;
      }
      const f = { name: tok[i++], args: {} };
      if (tok[i] === ":") (f.alias = f.name), (f.name = tok[i + 1]), (i += 2);
      if (tok[i] === "(") {
        i++;
        while (tok[i] !== ")") {
          f.args[tok[i]] = tok[i + 2];
          i += 3;
        }
        i++;
      }
      if (tok[i] === "{") f.sel = sel();
      out.push(f);
    }
    i++;
    return out;
  };
  const frags = {};
  let op = null;
  while (i < tok.length) {
    if (tok[i] === "fragment") {
      const n = tok[i + 1];
      i += 4;
      frags[n] = sel();
    } else {
      while (tok[i] !== "{") i++;
      op = sel();
    }
  }
  return { op, frags };
}
function project(v, sel, frags) {
  if (v === null || v === undefined) return null;
  if (Array.isArray(v)) return v.map((x) => project(x, sel, frags));
  const out = {};
  const go = (s) => {
    for (const f of s) {
      if (f.spread) {
        if (!frags[f.spread]) throw new Error("unknown fragment " + f.spread);
        go(frags[f.spread]);
      } else if (f.inline) go(f.inline);
      else {
        let x = v[f.name];
        if ((f.name === "fields" || f.name === "enumValues") && Array.isArray(x) && f.args.includeDeprecated !== "true") x = x.filter((y) => !y.isDeprecated);
        const p = f.sel ? project(x, f.sel, frags) : x === undefined ? null : x;
        const k = f.alias || f.name;
        out[k] = k in out && f.sel ? merge(out[k], p) : p;
      }
    }
  };
  go(sel);
  return out;
}
const merge = (a, b) => (Array.isArray(a) ? a.map((x, i) => merge(x, b[i])) : a && typeof a === "object" ? { ...a, ...Object.fromEntries(Object.entries(b).map(([k, v]) => [k, k in a ? merge(a[k], v) : v])) } : b);

// ---------------------------------------------------------------- main
async function pool(list, width, f) {
  let i = 0;
  await Promise.all([...Array(width)].map(async () => { while (i < list.length) await f(list[i++]); }));
}
async function main() {
  fs.mkdirSync(SCRATCH, { recursive: true });
  if (CHECK === "N04") return require("./release.js")({ PKG, SCRATCH, THOROUGH, ONLY, SAYS: SCHEMAS, TARGETS, CERT: CERTS.good, say, pool });
  const B = CHECK === "N01" ? archives(path.join(SCRATCH, "archives")) : BODY;
  const one = CHECK === "N01" ? install : fetchSchema;
  let S = CHECK === "N01" ? n01(B) : n02();
  const counts = {}, outcomes = {}, suspects = [], ops = new Set();
  const go = async (sc) => {
    const r = await one(sc, B);
    counts.scenarios = (counts.scenarios || 0) + 1;
    counts.requests = (counts.requests || 0) + r.log.length;
    outcomes[r.outcome] = (outcomes[r.outcome] || 0) + 1;
    if (r.bad.length) suspects.push(sc);
    return r;
  };
  if (ONLY) S = S.filter((s) => s.id === ONLY);
  // local faults: every operation of these runs, each failing alone
  const GOOD = { k: "full" };
  const bases =
    CHECK === "N01"
      ? [
          { id: "install", steps: [GOOD], must: true },
          { id: "install, no bin", state: "nobin", steps: [GOOD], must: true },
          { id: "install over stale archive", state: "stalewrong", steps: [GOOD], must: true },
          { id: "wrong archive", steps: [{ k: "full", body: "evil" }] },
          { id: "cut archive", steps: [{ k: "cut", how: "fin", at: "mid" }] },
          { id: "404", steps: [{ k: "full", status: 404 }] },
          { id: "404 over stale archive", state: "stalewrong", steps: [{ k: "full", status: 404 }] },
          { id: "large archive", archive: "big", steps: [GOOD], must: true },
        ]
      : [
          { id: "store", plain: true, steps: [GOOD], must: true },
          { id: "store over earlier", plain: true, state: "old", steps: [GOOD], must: true },
          { id: "store large", plain: true, steps: [{ k: "full", body: "big" }], must: true },
          { id: "store chunked", plain: true, steps: [{ k: "full", body: "big", enc: "chunked" }], must: true },
          { id: "cut", plain: true, steps: [{ k: "cut", how: "rst", at: "mid", body: "big" }] },
        ];
  for (const b of bases) {
    const r = await go({ ...b, id: "base: " + b.id });
    const writes = r.trace.filter((l) => l.startsWith("write:")).length;
    for (const [fault, name] of faults(r.trace)) {
      ops.add(fault.split(":").slice(0, 2).join(" "));
      S.push({ ...b, must: false, id: `${b.id}; fault ${name}`, fault });
    }
    S.push({ ...b, id: `${b.id}; every transfer short`, fault: "short" });
    void writes;
  }
  if (ONLY) S = S.filter((s) => s.id === ONLY);
  // stalls sleep: start them first
  S.sort((a, b) => /stall/.test(b.id) - /stall/.test(a.id));
  await pool(S, 24, go);
  // a suspect counts only if it fails again on its own, with more patience
  const tried = new Set(), began = Date.now();
  let confirmed = 0;
  for (const sc of suspects) {
    // those that hang take long: enough is enough
    if (confirmed && Date.now() - began > 120000) break;
    if (tried.has(sc.id) || tried.size >= 25) continue;
    tried.add(sc.id);
    const r = await one({ ...sc, patient: true }, B);
    for (const b of r.bad) {
      confirmed++;
      const [k, what] = [b.slice(0, b.indexOf("|")), b.slice(b.indexOf("|") + 1)];
      say({ t: "violation", key: `${k}: ${sc.id}`, what, replay: `scenario ${sc.id}\n${JSON.stringify(sc)}\nexit ${r.detail.code}\n${r.detail.out}\n${r.trace.slice(-30).join("\n")}\nrun again: check with NPM_ONLY='${sc.id}'\n` });
    }
  }
  if (SCHEMAS) {
    const skip = (why) => say({ t: "violation", key: "query", what: why, replay: String(QUERY) });
    let q = null;
    try { q = QUERY && parseQuery(QUERY); } catch (e) { skip("the introspection query does not parse: " + e); }
    if (!QUERY) skip("no introspection query was sent");
    if (q)
      for (const f of fs.readdirSync(SCHEMAS).filter((f) => f.endsWith(".full.json"))) {
        const full = JSON.parse(fs.readFileSync(path.join(SCHEMAS, f), "utf8"));
        let p;
        try { p = { data: project(full.data || full, q.op, q.frags) }; } catch (e) { skip("the introspection query cannot be executed: " + e); break; }
        fs.writeFileSync(path.join(SCHEMAS, f.replace(".full.json", ".asked.json")), JSON.stringify(p));
      }
  }
  counts.fault_points = ops.size;
  say({ t: "counts", counts, outcomes, samples: S.filter((_, i) => i % Math.ceil(S.length / 5) === 0).map((s) => s.id).slice(0, 5) });
}
main().then(() => process.exit(0), (e) => {
  console.error(e);
  process.exit(3);
});
