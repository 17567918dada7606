"use strict";
// N04: the release scripts, run whole with recording stand-ins for what reaches the outside (cargo, ghr, yarn), and every
// call of every other command failing in turn; what gets published is then installed by the package's own installer.
const fs = require("fs");
const path = require("path");
const https = require("https");
const { createHash } = require("crypto");
const { spawn, spawnSync } = require("child_process");

const sha = (b) => createHash("sha256").update(b).digest("hex");
const JOBS = ["build_release_bin", "create_github_release", "create_npm_release"];
const WRAPPED = "cargo ghr yarn npm tar gzip sha256sum shasum tee ls grep sed mkdir cat cut awk cp mv rm tr head tail basename dirname find xargs sort jq node".split(" ");
const OWN = ["cargo", "ghr", "yarn", "npm", "qlc"];
const WRAPPER = `#!/bin/bash
name=\${0##*/}
for ((k = 1; ; k++)); do (set -C; : > "$REL_LOG/$name.$k") 2>/dev/null && break; done
run() { "@REAL@" "$@"; }
[ "$REL_FAULT" = "$name.$k" ] || exec "@REAL@" "$@"
case $REL_MODE in
  fail) exit 1;;
  kill) kill -9 $$;;
  late) run "$@"; exit 1;;
  cut) out=$(run "$@"); printf %s "\${out:0:$((\${#out} / 2))}"; exit 1;;
  torn)
    REL_TORN=1 run "$@"
    for a in "$@"; do [ -f "$a" ] && truncate -s $(($(stat -c %s "$a") / 2)) "$a"; done
    exit 1;;
esac
`;
const REAL = {
  cargo: `#!/bin/bash
PATH=$REL_PATH
cd "$CIRCLE_WORKING_DIRECTORY"
for ((i = 1; i <= $#; i++)); do case \${!i} in --target=*) t=\${!i#--target=};; --target) j=$((i + 1)); t=\${!j};; --release|-r) p=release;; esac; done
d=target/$t/\${p:-debug}; mkdir -p "$d"; rm -f "$d/qlc"
{ cat "$REL_REAL/head"; echo "# $t $REL_VERSION"; seq 1 3000; } > "$d/qlc"
[ -n "$REL_TORN" ] && truncate -s 5000 "$d/qlc"
chmod 755 "$d/qlc"; touch -d @1000000000 "$d/qlc"
`,
  qlc: `#!/bin/bash
PATH=$REL_PATH
printf '%s\\n' "$REL_SAYS"
`,
  ghr: `#!/bin/bash
PATH=$REL_PATH
pre=false; rest=()
while [ $# -gt 0 ]; do
  a=\${1/#--/-}; shift
  case $a in
    -t|-u|-r|-n|-b|-p|-c|-token|-username|-repository|-name|-body|-parallel|-commitish) declare "o_\${a:1:1}=$1"; shift;;
    -delete|-recreate) del=1;;
    -replace) rep=1;;
    -soft) soft=1;;
    -prerelease) pre=true;;
    -draft) draft=1;;
    -*) ;;
    *) rest+=("$a");;
  esac
done
[ \${#rest[@]} = 2 ] && [ -n "\${o_t:-$GITHUB_TOKEN}" ] || exit 10
tag=\${rest[0]} from=\${rest[1]} at="$REL_OUT/github/\${rest[0]}"
[ -n "$soft" ] && [ -d "$at" ] && exit 0
[ -n "$del" ] && rm -rf "$at"
mkdir -p "$at"
printf '{"tag":"%s","name":"%s","commit":"%s","pre":%s,"draft":%s}\\n' "$tag" "$o_n" "$o_c" $pre \${draft:+true}\${draft:-false} > "$REL_OUT/github/$tag.json"
n=0
[ -d "$from" ] && set -- "$from"/* || set -- "$from"
for f in "$@"; do
  [ -f "$f" ] || continue
  [ -e "$at/\${f##*/}" ] && [ -z "$rep" ] && exit 12
  n=$((n + 1)); [ -n "$REL_TORN" ] && [ $n = 3 ] && exit 1
  cp "$f" "$at/"
done
[ $n -gt 0 ] || exit 11
`,
  yarn: `#!/bin/bash
PATH=$REL_PATH
[ "$1" = publish ] || exit 0
shift
while [ $# -gt 0 ]; do case $1 in --new-version) v=$2; shift 2;; --new-version=*) v=\${1#*=}; shift;; --tag) t=$2; shift 2;; --tag=*) t=\${1#*=}; shift;; --access) a=$2; shift 2;; --access=*) a=\${1#*=}; shift;; *) shift;; esac; done
exec "$REL_REAL/put" "$v" "\${t:-latest}" "$a"
`,
  npm: `#!/bin/bash
PATH=$REL_PATH
[ "$1" = publish ] || exit 0
shift
while [ $# -gt 0 ]; do case $1 in --tag) t=$2; shift 2;; --tag=*) t=\${1#*=}; shift;; --access) a=$2; shift 2;; --access=*) a=\${1#*=}; shift;; *) shift;; esac; done
exec "$REL_REAL/put" "" "\${t:-latest}" "$a"
`,
  put: `#!/bin/bash
PATH=$REL_PATH
n=$(ls "$REL_OUT/npm" 2>/dev/null | grep -c json)
v=$1; [ -n "$v" ] || v=$(node -p 'require("./package.json").version')
[ -e "$REL_OUT/npm/$v.json" ] && exit 1
mkdir -p "$REL_OUT/npm/$v"
cp -r . "$REL_OUT/npm/$v/" && node -e '
const fs = require("fs"), f = process.argv[1] + "/package.json", j = JSON.parse(fs.readFileSync(f));
j.version = process.argv[2]; fs.writeFileSync(f, JSON.stringify(j, null, 2));' "$REL_OUT/npm/$v" "$v" || exit 1
printf '{"version":"%s","tag":"%s","access":"%s"}\\n' "$v" "$2" "$3" > "$REL_OUT/npm/$v.json"
`,
};
const read = (f) => { try { return fs.readFileSync(f); } catch { return null; } };
const list = (d) => { try { return fs.readdirSync(d).sort(); } catch { return []; } };

/** What CI runs and hands on: the commands of each job, and the paths it keeps for the next. */
function jobs(config) {
  return JOBS.map((name) => {
    const at = config.indexOf(`\n  ${name}:`);
    const rest = config.slice(at + 1);
    const block = rest.slice(0, rest.slice(4).search(/\n {0,2}\S/) + 4);
    const commands = [...block.matchAll(/^\s*command: (\.\/.*)$/gm)].map((m) => m[1]);
    const keeps = [...block.matchAll(/^\s*- qlc\/(.*)$/gm)].map((m) => m[1]);
    if (at < 0 || !commands.length) throw new Error(`job ${name} is not understood`);
    return { name, commands, keeps };
  });
}
function run(cmd, cwd, env) {
  return new Promise((ok) => {
    const p = spawn("/bin/bash", ["-c", cmd], { cwd, env, stdio: ["ignore", "pipe", "pipe"], detached: true });
    let out = "";
    p.stdout.on("data", (d) => (out += d));
    p.stderr.on("data", (d) => (out += d));
    const t = setTimeout(() => { try { process.kill(-p.pid, "SIGKILL"); } catch {} out += "\n(hangs)"; }, 60000);
    p.on("close", (code, signal) => { clearTimeout(t); ok({ code, signal, out }); });
  });
}

module.exports = async function n04({ PKG, SCRATCH, THOROUGH, ONLY, SAYS, TARGETS, CERT, say, pool }) {
  const repo = path.join(PKG, "../..");
  const CI = jobs(fs.readFileSync(path.join(repo, ".circleci/config.yml"), "utf8"));
  const current = SAYS.match(/\d+\.\d+\.\d+\S*/)[0];
  const VERSIONS = [current, "5.0.0-alpha.1", "10.20.30-beta.12", "0.0.1", "6.1.0-alpha", "6.1.0-beta", "11.0.10", "1.0.0-alpha.10", "1.0.0-beta.0"];
  const FAULTY = THOROUGH ? VERSIONS : VERSIONS.slice(0, 3);
  let serial = 0;
  const packed = new Map();
  const counts = { scenarios: 0, installations: 0, calls: 0, fault_points: 0 }, outcomes = {}, seen = new Set();

  // the published package as npm would hand it out
  function pack(dir) {
    const key = sha(spawnSync("/bin/bash", ["-c", "find . -type f | sort | xargs -d '\\n' sha256sum; find . -type f -executable | sort"], { cwd: dir }).stdout);
    if (!packed.has(key)) {
      const to = path.join(SCRATCH, `pack${serial++}`);
      fs.mkdirSync(to);
      const home = path.join(to, "home");
      fs.mkdirSync(home);
      const r = spawnSync("npm", ["pack", "--offline", "--ignore-scripts", "--silent", "--pack-destination", to], { cwd: dir, env: { PATH: process.env.PATH, HOME: home, npm_config_cache: home } });
      const tgz = list(to).find((f) => f.endsWith(".tgz"));
      const ok = r.status === 0 && tgz && spawnSync("tar", ["xzf", tgz], { cwd: to }).status === 0;
      packed.set(key, ok ? path.join(to, "package") : null);
    }
    return packed.get(key);
  }
  async function installs(dir, releases, built, version, bad) {
    const server = https.createServer(CERT, (req, res) => {
      if (req.headers.host.startsWith("github.com")) {
        const m = req.url.match(/^\/notarize\/qlc\/releases\/download\/([^/]+)\/([^/]+)$/);
        const f = m && path.join(releases, decodeURIComponent(m[1]), decodeURIComponent(m[2]));
        if (!f || !fs.existsSync(f)) return res.writeHead(404).end();
        return res.writeHead(302, { Location: "https://mirror.example" + req.url }).end();
      }
      const [tag, file] = req.url.split("/").slice(-2).map(decodeURIComponent);
      res.end(read(path.join(releases, tag, file)));
    });
    await new Promise((ok) => server.listen(0, "127.0.0.1", ok));
    for (const [platform, target] of Object.entries(TARGETS)) {
      counts.installations++;
      const at = path.join(SCRATCH, `i${serial++}`);
      fs.cpSync(dir, at, { recursive: true, preserveTimestamps: true });
      const post = (JSON.parse(read(path.join(at, "package.json"))).scripts || {}).postinstall || "";
      const env = { HOME: at, PATH: process.env.PATH, NPM_PORT: String(server.address().port), NPM_TIMEOUT: "20000", NPM_PLATFORM: platform, NODE_EXTRA_CA_CERTS: `${__dirname}/certs/ca.pem`, NODE_OPTIONS: `--require ${__dirname}/preload.js` };
      const r = await run(post, at, env);
      const got = read(path.join(at, "bin/qlc"));
      if (!post) bad.push("install|the published package installs nothing");
      else if (r.code !== 0) bad.push(`install ${platform}|the published package cannot be installed: ${r.out.trim().replace(/\n/g, " / ").slice(0, 400)}`);
      else if (!got || sha(got) !== built[target]) bad.push(`binary ${platform}|the published package installs another binary than was built for ${target}`);
      else if (!(fs.statSync(path.join(at, "bin/qlc")).mode & 0o100)) bad.push(`mode ${platform}|the installed binary cannot be run`);
      fs.rmSync(at, { recursive: true, force: true });
    }
    server.close();
    const j = JSON.parse(read(path.join(dir, "package.json")));
    const refs = [j.main, j.types, ...Object.values(j.exports || {}), ...Object.values(j.bin || {})].filter((x) => typeof x === "string");
    for (const f of refs) if (!fs.existsSync(path.join(dir, f))) bad.push(`missing|${f} is not in the published package`);
    for (const f of Object.values(j.exports || {})) if (typeof f === "string" && f.endsWith(".js") && !fs.existsSync(path.join(dir, f.replace(/js$/, "d.ts")))) bad.push(`missing|${f} has no types in the published package`);
  }
  async function one(sc) {
    counts.scenarios++;
    const bad = [], trace = [];
    const top = path.join(SCRATCH, `r${serial++}`);
    const root = path.join(top, "opt/qlc");
    for (const d of [root, "bin", "real", "log", "out", "home"].map((d) => path.resolve(top, d))) fs.mkdirSync(d, { recursive: true });
    const lay = () => {
      for (const d of [".circleci", "pkg"]) fs.cpSync(path.join(repo, d), path.join(root, d), { recursive: true, preserveTimestamps: true, filter: (f) => !f.includes("node_modules") });
      for (const f of ["Cargo.toml", "Cargo.lock", "README.md", "LICENSE"]) fs.copyFileSync(path.join(repo, f), path.join(root, f));
    };
    lay();
    const wrap = (real) => WRAPPER.replaceAll("@REAL@", real);
    for (const [f, c] of Object.entries(REAL)) fs.writeFileSync(path.join(top, "real", f), c, { mode: 0o755 });
    for (const w of WRAPPED) {
      const real = OWN.includes(w) ? path.join(top, "real", w) : ["/usr/bin", "/bin"].map((d) => `${d}/${w}`).find((f) => fs.existsSync(f));
      if (real) fs.writeFileSync(path.join(top, "bin", w), wrap(real), { mode: 0o755 });
    }
    // the binaries speak for themselves, through the wrapper's counting
    fs.writeFileSync(path.join(top, "real/head"), wrap("$REL_REAL/qlc"));
    if (sc.stale)
      for (const t of Object.values(TARGETS)) {
        fs.mkdirSync(path.join(root, "target", t, "release"), { recursive: true });
        fs.writeFileSync(path.join(root, "target", t, "release/qlc"), `#!/bin/sh\necho 'QL Compiler ${sc.version}'\n# stale ${t}\n`, { mode: 0o755 });
      }
    const env = (faulty) => ({
      HOME: path.join(top, "home"),
      PATH: `${top}/bin:${process.env.PATH}`,
      CIRCLE_WORKING_DIRECTORY: root,
      CIRCLE_SHA1: "0123456789abcdef0123456789abcdef01234567",
      GITHUB_TOKEN: "token",
      REL_LOG: path.join(top, "log"), REL_OUT: path.join(top, "out"), REL_REAL: path.join(top, "real"),
      REL_VERSION: sc.version, REL_PATH: process.env.PATH, REL_SAYS: SAYS.replace(current, sc.version),
      REL_FAULT: faulty ? sc.fault || "" : "", REL_MODE: sc.mode || "",
    });
    const released = path.join(top, "out/github"), published = path.join(top, "out/npm");
    const built = {};
    // what is public must be complete, at any time
    const look = async (when) => {
      for (const f of list(released).filter((f) => f.endsWith(".json"))) {
        const rel = JSON.parse(read(path.join(released, f)));
        if (rel.tag !== sc.version) bad.push(`tag|a release is made as ${rel.tag} ${when}`);
        if (rel.pre !== /-(alpha|beta)/.test(sc.version)) bad.push(`prerelease|the release is ${rel.pre ? "" : "not "}marked as a prerelease`);
        if (rel.draft || rel.commit !== "0123456789abcdef0123456789abcdef01234567") bad.push("release|the release is a draft or of another commit");
      }
      for (const f of list(published).filter((f) => f.endsWith(".json"))) {
        const p = JSON.parse(read(path.join(published, f)));
        const want = /-alpha/.test(sc.version) ? "alpha" : /-beta/.test(sc.version) ? "beta" : "latest";
        if (p.version !== sc.version) bad.push(`version|the package is published as ${p.version} ${when}`);
        if (p.tag !== want) bad.push(`dist-tag|the package is published under the tag ${p.tag}`);
        if (p.access !== "public") bad.push("access|the package is not public");
        const all = fs.readdirSync(path.join(top, "out"), { recursive: true }).sort().map((f) => path.join(top, "out", f)).filter((f) => fs.statSync(f).isFile());
        const key = sha(JSON.stringify([built, all.map((f) => [f.slice(top.length), fs.statSync(f).mode, sha(read(f).toString("latin1").replaceAll(top, ""))])]));
        if (seen.has(key)) continue; // looked at already, and found good
        const dir = pack(path.join(published, p.version));
        const had = bad.length;
        if (!dir) bad.push("pack|the published package cannot be packed");
        else await installs(dir, released, built, sc.version, bad);
        if (bad.length === had) seen.add(key);
      }
    };
    let failed = false;
    for (const job of CI) {
      // each job starts from a fresh checkout and what the jobs before it have kept
      const keep = path.join(top, "kept");
      let r;
      for (const attempt of [true, false]) {
        for (const c of job.commands) {
          r = await run(c, root, env(attempt));
          trace.push(`${job.name} (${attempt ? "first" : "again"}): exit ${r.code} ${r.signal || ""}\n${r.out}`);
          if (r.code !== 0) break;
        }
        if (job === CI[0] && r.code === 0)
          for (const t of Object.values(TARGETS)) {
            const b = read(path.join(root, "target", t, "release/qlc"));
            built[t] = b && sha(b);
            if (!b || !b.includes(`# ${t} ${sc.version}`) || !b.toString().endsWith("\n3000\n")) bad.push(`build|the build succeeds without a whole binary for ${t}`);
          }
        await look(`by ${job.name}`);
        if (r.code === 0) break;
        failed = true;
        if (!attempt || !sc.fault) break;
        fs.rmSync(root, { recursive: true, force: true });
        fs.mkdirSync(root, { recursive: true });
        lay();
        if (fs.existsSync(keep)) fs.cpSync(keep, root, { recursive: true, preserveTimestamps: true });
      }
      const done = list(published).length;
      if (r.code !== 0) {
        if (!sc.fault || !done) bad.push(`${sc.fault ? "again" : "fails"} ${job.name}|the job fails although nothing goes wrong${sc.fault ? " any more" : ""}: ${r.out.trim().split("\n").pop().slice(0, 150)}`);
        break;
      }
      if (job === CI[1]) {
        const rel = read(path.join(released, sc.version + ".json"));
        if (!rel) bad.push("norelease|the job succeeds without a release");
        for (const t of Object.values(TARGETS)) if (!read(path.join(released, sc.version, `qlc-${sc.version}-${t}.tar.gz`))) bad.push(`noasset|the release has no archive for ${t}`);
      }
      if (job === CI[2] && !done) bad.push("nopackage|the job succeeds without publishing the package");
      const fresh = path.join(top, "fresh");
      fs.mkdirSync(fresh);
      for (const k of job.keeps) if (fs.existsSync(path.join(root, k))) fs.cpSync(path.join(root, k), path.join(fresh, k), { recursive: true, preserveTimestamps: true });
      if (fs.existsSync(keep)) fs.cpSync(keep, fresh, { recursive: true, force: false, preserveTimestamps: true });
      fs.rmSync(keep, { recursive: true, force: true });
      fs.renameSync(fresh, keep);
      fs.rmSync(root, { recursive: true, force: true });
      fs.cpSync(keep, root, { recursive: true, preserveTimestamps: true });
      lay();
    }
    const calls = list(path.join(top, "log"));
    counts.calls += calls.length;
    const o = failed ? "a job fails, and succeeds again" : "released";
    outcomes[o] = (outcomes[o] || 0) + 1;
    fs.rmSync(top, { recursive: true, force: true });
    return { bad, calls, trace };
  }
  const report = (sc, r) => {
    for (const b of r.bad) say({ t: "violation", key: `${b.slice(0, b.indexOf("|"))}: ${sc.id}`, what: b.slice(b.indexOf("|") + 1), replay: `scenario ${sc.id}\n${r.trace.join("\n")}\nrun again: check with NPM_ONLY='${sc.id}'\n` });
  };
  const S = [];
  for (const version of VERSIONS) {
    const base = { id: `release ${version}`, version };
    const r = await one(base);
    if (!ONLY || ONLY === base.id) report(base, r);
    if (!FAULTY.includes(version)) continue;
    counts.fault_points += r.calls.length;
    for (const fault of r.calls) {
      const name = fault.split(".")[0];
      const modes = ["fail", "late", "kill"];
      if (["qlc", "sha256sum", "grep", "sed", "cat", "cut", "awk", "gzip", "ls"].includes(name)) modes.push("cut");
      if (["tar", "tee", "cargo", "ghr", "cp", "mv"].includes(name) || (name === "sed" && /make-npm/.test(CI[2].commands.join()))) modes.push("torn");
      for (const mode of modes)
        for (const stale of name === "cargo" || THOROUGH ? [false, true] : [false]) S.push({ id: `release ${version}, ${fault} ${mode}${stale ? " over an earlier build" : ""}`, version, fault, mode, stale });
    }
  }
  const list2 = ONLY ? S.filter((s) => s.id === ONLY) : S;
  let told = 0;
  await pool(list2, 12, async (sc) => {
    const r = await one(sc);
    if (r.bad.length && told++ < 25) report(sc, r);
  });
  counts.packages_looked_at = seen.size;
  say({ t: "counts", counts, outcomes, samples: S.filter((_, i) => i % Math.ceil(S.length / 5) === 0).map((s) => s.id).slice(0, 5) });
};
