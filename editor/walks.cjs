// walks.cjs BUNDLE < schedules (JSON lines) > what the extension showed after each event (JSON lines).
const { Host } = require("./host.cjs");
const readline = require("readline");
const out = process.stdout;
console.log = console.warn = console.error = () => {};
process.on("unhandledRejection", (e) => Host.current.errors.push(String(e)));
(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const w = JSON.parse(line);
    const h = new Host(w.world);
    await h.start(process.argv[2]);
    const seen = [];
    for (const e of w.events) {
      // an answer is for the text that was on disk when the request was made
      if (e[0] === "answer") {
        const q = h.pending[e[1]];
        if (q) {
          const k = q.args.join(" ");
          const a = w.answers[e[2]] || {};
          let v = a[k] || a[q.args.slice(0, 2).join(" ")] || a["*"];
          if (v && v.byVersion) v = v.byVersion[q.disk[q.args[1]]];
          await h.event(["answer", e[1], v === undefined ? { fail: "no answer for " + k } : v]);
        }
      } else await h.event(e);
      seen.push(h.look());
    }
    out.write(JSON.stringify({ id: w.id, loaded: h.loaded, seen, errors: h.errors.slice(0, 3) }) + "\n");
  }
})();
